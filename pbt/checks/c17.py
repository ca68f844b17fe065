"""C17: the command line program reads files faithfully and agrees with the library."""
import os, re, subprocess
from ..common import *

ID = "C17"
RULE = ("generated data files of all 13 tasks (separators, line ends, blank lines and number formats vary) and command lines: the program's tree is "
        "parsed from its output, evaluated on the rows and compared with the package fitted on the same rows (objective, depth, nodes, leaf sizes, "
        "training and test score, question length); a sixth of the cases are faulty command lines or files, which have to be refused with a message "
        "and a failure status; non-trivial: the printed tree has a branching node, or the command line is faulty")
CASES = {"quick": 75000, "thorough": 300000}
CHUNK = 10
PROG = os.environ.get("PBT_STREED")
FLAGS = {"max_depth": "max-depth", "max_num_nodes": "max-num-nodes", "min_leaf_node_size": "min-leaf-node-size", "cost_complexity": "cost-complexity",
         "discrimination_limit": "discrimination-limit", "teacher_method": "ppg-teacher-method", "lasso_penalty": "lasso-penalty",
         "ridge_penalty": "ridge-penalty", "feature_ordering": "feature-ordering", "use_branch_caching": "use-branch-caching",
         "use_dataset_caching": "use-dataset-caching", "use_terminal_solver": "use-terminal-solver", "use_similarity_lower_bound": "use-similarity-lower-bound",
         "use_upper_bound": "use-upper-bound", "use_lower_bound": "use-lower-bound", "use_task_lower_bound": "use-task-lower-bound",
         "regression_lower_bound": "regression-bound"}
NUM = ["max-depth", "max-num-nodes", "max-num-features", "num-instances", "num-extra-cols", "min-leaf-node-size", "random-seed", "duplicate-factor"]
REAL = ["time", "cost-complexity", "discrimination-limit", "lasso-penalty", "ridge-penalty", "upper-bound", "train-test-split"]
ADDED = ("accuracy", "cost-complex-accuracy")        # the score is a share of the instances
LIMITED = ("cost-sensitive", "instance-cost-sensitive", "prescriptive-policy", "f1-score", "group-fairness", "equality-of-opportunity")
BOOL = ["hyper-tune", "verbose", "stratify", "use-terminal-solver", "use-upper-bound", "use-branch-caching", "use-dataset-caching"]
COUNTED = ["accuracy", "cost-complex-accuracy", "regression", "cost-complex-regression", "instance-cost-sensitive"]
WORD = ["task", "feature-ordering", "ppg-teacher-method", "regression-bound"]


def gen(rng, tier, i):
    t = T.ALL[G.pick(rng, sorted(T.ALL))]
    N, F, D = t.size
    n, F = G.ri(rng, 3, N + 20), G.ri(rng, 1, F)
    one = {"C": 1} if t.name == "piecewise-linear-regression" else {}
    c = t.case(rng, n, F, min(D, 3)) if not one else None
    if one:
        c = t.gen_rows(rng, n, F, **one)
        c["task"] = t.name
        c["params"] = t.gen_limits(rng, n, D)
        c["params"].update(t.gen_params(rng, c))
    F = len(c["rows"]["X"][0])
    for k in ("all_trees", "upper_bound"): c["params"].pop(k, None)
    c["style"] = {"eol": G.pick(rng, ["\n", "\n", "\n", "\r\n"]), "trail": G.pick(rng, ["", "", " "]), "sep": G.pick(rng, [" ", " ", " ", " ", "\t", "  "]), "last": G.chance(rng, 0.85),
                  "blank": G.pick(rng, [0, 0, 0, 1, 2]), "int": G.chance(rng, 0.5)}
    if G.chance(rng, 0.35):
        m = G.ri(rng, 1, max(2, n // 2))
        ids = rng.integers(0, n, m)
        c["test"] = {k: [np_list(v)[j] for j in ids] for k, v in c["rows"].items()}
        if "X" in c["test"] and G.chance(rng, 0.7):
            c["test"]["X"] = [[int(b) ^ int(rng.random() < 0.3) for b in r] for r in c["test"]["X"]]
    r = rng.random()
    if r < 0.12 and t.name != "cost-sensitive": c["features"] = G.ri(rng, 1, F + 2)
    elif r < 0.2 and t.name not in ("prescriptive-policy",): c["dup"] = G.ri(rng, 2, 3)
    elif r < 0.28 and n >= 20:
        c["split"] = G.pick(rng, [0.0, 0.2, 0.5, round(float(rng.uniform(0.05, 0.8)), 3)])
        if G.chance(rng, 0.3): c["stratify"] = True
    elif r < 0.33 and not one: c["tune"] = True
    elif r < 0.4 and t.name in COUNTED: c["count"] = G.ri(rng, 3, n + 3)
    if G.chance(rng, 0.16):
        c["fault"] = gen_fault(rng, t)
        c.pop("count", None)
    return c


def np_list(v):
    return v.tolist() if hasattr(v, "tolist") else list(v)


def gen_fault(rng, t):
    kind = G.pick(rng, ["missing-file", "missing-test-file", "no-value", "unknown", "no-dash", "number", "real", "flag", "word", "range", "nodes",
                        "complexity", "binary", "short-line", "long-line", "label"])
    if t.name == "cost-sensitive" and G.chance(rng, 0.4): kind = "cost-file"
    f = {"kind": kind}
    if kind == "cost-file": f["what"], f["at"] = G.pick(rng, ["missing", "word", "fewer", "short", "empty"]), G.ri(rng, 0, 10 ** 6)
    if kind == "number": f["args"] = ["-" + G.pick(rng, NUM), G.pick(rng, ["abc", "", "3x", "x3", "2.5", "--3", "1e", "nan"])]
    elif kind == "real": f["args"] = ["-" + G.pick(rng, REAL), G.pick(rng, ["abc", "", "0.1x", "x", "0.1.2", "0,1", "--1"])]
    elif kind == "flag": f["args"] = ["-" + G.pick(rng, BOOL), G.pick(rng, ["maybe", "", "2", "-1", "yess", "0x"])]
    elif kind == "word": f["args"] = ["-" + G.pick(rng, WORD), G.pick(rng, ["abc", "accuracy2", "Gini", "dm"])]
    elif kind == "unknown": f["args"] = [G.pick(rng, ["-maxdepth", "--max-depth", "-Max-Depth", "-x", "-"]), "3"]
    elif kind == "no-dash": f["args"] = ["max-depth", "3"]
    elif kind == "no-value": f["args"] = ["-" + G.pick(rng, NUM + REAL + BOOL + WORD)]
    elif kind == "range": f["args"] = G.pick(rng, [["-max-depth", "21"], ["-max-depth", "-1"], ["-max-num-nodes", "-1"], ["-min-leaf-node-size", "0"],
                                                   ["-cost-complexity", "1.5"], ["-cost-complexity", "-0.1"], ["-discrimination-limit", "1.01"],
                                                   ["-time", "-1"], ["-num-instances", "0"], ["-max-num-features", "0"], ["-random-seed", "-2"],
                                                   ["-train-test-split", "1.2"], ["-lasso-penalty", "-0.5"], ["-num-extra-cols", "-1"], ["-duplicate-factor", "0"]])
    elif kind in ("binary", "short-line", "long-line", "label"): f["at"], f["what"] = G.ri(rng, 0, 10 ** 6), G.pick(rng, ["2", "7", "x", "-1"])
    return f


def shrinks(case):
    from ..engine import default_shrinks
    for k in ("test", "features", "dup", "split", "stratify", "tune", "count"):
        if k in case: yield {a: b for a, b in case.items() if a != k}
    plain = {"eol": "\n", "trail": "", "last": True, "blank": 0, "int": True, "sep": " "}
    for k, v in plain.items():
        if case["style"].get(k) != v: yield {**case, "style": {**case["style"], k: v}}
    yield from default_shrinks(case)


# ------------------------------------------------------------------ files

def num(v, style):
    v = float(v)
    return str(int(v)) if style["int"] and v == int(v) and abs(v) < 1e15 else repr(v)


def lines(case, rows, t):
    """The text of every instance: label, extra columns, features."""
    st, out = case["style"], []
    for i, x in enumerate(rows["X"]):
        x = [int(v) for v in x]
        if "sens" in case: x = [x[t.orig(j, case["sens"])] for j in range(len(x))]
        if "T" in rows and "E" in rows: head = [num(rows["T"][i], st), str(int(rows["E"][i]))]
        elif "T" in rows:
            K, r = case["K"], rows["T"][i]
            head = [str(int(r[0])), str(int(r[0])), num(r[1], st), num(r[2], st)] + [num(v, st) for v in r[3:3 + K]] + [str(int(r[3 + K]))] + [num(v, st) for v in r[4 + K:]]
        elif "C" in rows: head = [str(min(range(len(rows["C"][i])), key=lambda k: rows["C"][i][k]))] + [num(v, st) for v in rows["C"][i]]
        elif "Z" in rows: head = [num(rows["y"][i], st)] + [num(v, st) for v in rows["Z"][i]]
        elif t.tol == 1e-3 and t.maximise_score is False: head = [num(rows["y"][i], st)]
        else: head = [str(int(rows["y"][i]))]
        out.append((head, [str(v) for v in x]))
    return out


def write(path, rows, st, seed=0):
    text = [st.get("sep", " ").join(h + f) + st["trail"] for h, f in rows]
    for b in range(st["blank"]): text.insert((seed + b * 7) % (len(text) + 1), "")
    data = st["eol"].join(text) + (st["eol"] if st["last"] else "")
    with open(path, "w", newline="") as f: f.write(data)


def write_costs(path, case, K):
    with open(path, "w") as f: T.write_costs(f, case["aux"], case["style"]["blank"])


# ------------------------------------------------------------------ the program

def run(args, cwd):
    p = subprocess.run([PROG] + args, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def parse_tree(s, t):
    pos = 0

    def label(text):
        if t.name in ("simple-linear-regression", "piecewise-linear-regression"): return linear(text)
        return float(text) if t.tol == 1e-3 and t.maximise_score is False else int(text)

    def node():
        nonlocal pos
        if s[pos] != "[": raise ValueError("'[' expected at %d" % pos)
        j = min(k for k in (s.find(",", pos), s.find("]", pos)) if k >= 0)
        head = s[pos + 1:j]
        if s[j] == "]":
            pos = j + 1
            return ("L", label(head))
        pos = j + 1
        a = node()
        if s[pos] != ",": raise ValueError("',' expected at %d" % pos)
        pos += 1
        b = node()
        if s[pos] != "]": raise ValueError("']' expected at %d" % pos)
        pos += 1
        return ("B", int(head), a, b)
    r = node()
    if s[pos:].strip(): raise ValueError("text after the tree")
    return r


def linear(text):
    text = text.strip()
    b, b0 = {}, 0.0
    for sign, v, k in re.findall(r"([+-]?)\s*([0-9.]+(?:e[+-]?[0-9]+)?)(?:x([0-9]+))?", text):
        v = float(v) * (-1 if sign == "-" else 1)
        if k: b[int(k) - 1] = v
        else: b0 = v
    return b, b0


def with_rows(case, rows):
    return {**case, "rows": rows}


def restrict(rows, F):
    return {**rows, "X": [r[:F] for r in rows["X"]]}


def check(case):
    t = T.ALL[case["task"]]
    need_rows(case, 3)
    d = os.path.join(os.environ["PBT_SCRATCH"], "cli-%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    rows = case["rows"]
    F = len(rows["X"][0])
    if F == 0: raise Skip()
    base = {k: v for k, v in case.items() if k not in ("style", "test", "features", "dup", "split", "stratify", "tune", "count", "fault")}
    if "T" in rows and "E" not in rows and not t.valid(case): raise Skip()
    p = dict(case["params"])
    args = ["-task", t.name, "-file", "train.txt"]
    D, k, ml = t.limit(case)
    p["max_depth"], p["max_num_nodes"], p["min_leaf_node_size"] = D, k, ml
    if p.get("cost_complexity", 0) >= 1e-6 and k != 2 ** D - 1: raise Skip()
    if t.name == "cost-complex-accuracy" or t.name == "cost-complex-regression" or "Z" in rows: p.setdefault("cost_complexity", 0.01)
    if "sens" in case: p.setdefault("discrimination_limit", 0.05)
    if t.name == "prescriptive-policy": p.setdefault("teacher_method", "DR")
    for name, v in p.items():
        if name in FLAGS: args += ["-" + FLAGS[name], ("1" if v else "0") if isinstance(v, bool) else str(v)]
    if "T" in rows and "E" not in rows: args += ["-num-extra-cols", str(case["K"])]
    elif "C" in rows: args += ["-num-extra-cols", str(len(rows["C"][0]))]
    elif "Z" in rows: args += ["-num-extra-cols", str(len(rows["Z"][0]))]
    train = lines(case, rows, t)
    if "aux" in case:
        if len(case["aux"]["M"]) != max(rows["y"]) + 1: raise Skip()         # the file holds one line of costs per label
        write_costs(os.path.join(d, "cost.txt"), case, max(rows["y"]) + 1)
        args += ["-cost-file", "cost.txt"]
    test = case.get("test") if len(case.get("test", {}).get("X", [])) else None
    if test:
        if any(len(r) != F for r in test["X"]): raise Skip()
        write(os.path.join(d, "test.txt"), lines(case, test, t), case["style"], 3)
        args += ["-test-file", "test.txt"]
    if "features" in case: args += ["-max-num-features", str(case["features"])]
    if "dup" in case: args += ["-duplicate-factor", str(case["dup"])]
    if "split" in case and len(rows["X"]) < 20: raise Skip()                    # every part of the split needs instances
    if "split" in case and not test: args += ["-train-test-split", str(case["split"])] + ["-stratify", "1" if case.get("stratify") else "0"]
    if "tune" in case: args += ["-hyper-tune", "1"]
    count = case.get("count")
    if count: args += ["-num-instances", str(count)]
    fault = case.get("fault")
    if fault: return faulty(case, t, fault, args, train, d)
    write(os.path.join(d, "train.txt"), train, case["style"], 5)
    code, out = run(args, d)
    if code == 1 and "-train-test-split" in args and all_test(case, rows) and out.strip(): return Result(False, ["empty-train"])
    if code != 0: raise Violation("failure", "exit status %d for a valid command line %s: %s" % (code, " ".join(args), out[-300:]))
    if "closed successfully" not in out: raise Violation("incomplete", "output ends with %r" % out[-100:])
    lb = label_limits(base, t) + [k for k in ("test", "features", "dup", "split", "tune", "count") if k in case] + ["blank" if case["style"]["blank"] else "plain"]
    # the problem as the package sees it
    lib = base
    if "features" in case and case["features"] < F:
        if "sens" in case:
            keep = [t.orig(j, case["sens"]) for j in range(case["features"])]
            if len(keep) < 2: raise Skip()
            cut = lambda rs: {**rs, "X": [[r[j] for j in keep] for r in rs["X"]]}
            lib = {**with_rows(base, cut(rows)), "sens": 0}
            test = cut(test) if test else None
        else:
            lib = with_rows(base, restrict(rows, case["features"]))
            test = restrict(test, case["features"]) if test else None
    if "dup" in case: lib = with_rows(base, {a: [r for r in v for _ in range(case["dup"])] for a, v in rows.items()})
    m = re.search(r"Solutions: (\d+)", out)
    if not m and "No tree found" not in out: raise Violation("output", "neither solutions nor 'No tree found' in the output: %s" % out[-300:])
    if m and int(m.group(1)) != 1: raise Violation("output", "%s solutions reported" % m.group(1))
    tree = None
    if m:
        s = re.search(r"Solution 0: \s*(\d+)\s+(\d+)\s+(\S+)\s+(\S+)\s+(\S+)", out)
        w = re.search(r"Tree 0: (.*)", out)
        if not s or not w: raise Violation("output", "no solution or tree line: %s" % out[-300:])
        try:
            tree = parse_tree(w.group(1).strip(), t)
        except (ValueError, IndexError) as e:
            raise Violation("tree-text", "%s: %r" % (e, w.group(1)))
        if "Z" in rows:
            C = len(rows["Z"][0])
            tree = relabel(tree, lambda l: ([l[0].get(j, 0.0) for j in range(C)], l[1]))
        if "sens" in case: tree = refeature(tree, lambda f: t.orig(f, lib["sens"]))
        if any(f < 0 or f >= len(lib["rows"]["X"][0]) for f in O.features_of(tree)): raise Violation("feature", "feature outside the %d columns: %s" % (len(lib["rows"]["X"][0]), w.group(1)))
        if (int(s.group(1)), int(s.group(2))) != (O.depth_of(tree), O.nodes_of(tree)):
            raise Violation("size", "depth %s and %s nodes reported for %s" % (s.group(1), s.group(2), w.group(1)))
        if O.depth_of(tree) > D or O.nodes_of(tree) > k: raise Violation("limit", "limits %d, %d: %s" % (D, k, w.group(1)))
    if count and count < len(rows["X"]):
        # which instances are used is not stated: the training score is one of that many instances
        if t.name in ("accuracy", "cost-complex-accuracy") and tree is not None:
            v = float(s.group(3)) * count
            if abs(v - round(v)) > 1e-6: raise Violation("instances", "training accuracy %s is impossible for %d instances" % (s.group(3), count))
        return Result(tree is not None and O.nodes_of(tree) >= 1, lb + ["weak"])
    if case.get("split", 0) and "-train-test-split" in args:
        if tree is not None: parts(case, t, lib, tree, float(s.group(3)), float(s.group(4)))
        return Result(tree is not None and O.nodes_of(tree) >= 1, lb)
    if "tune" in case:
        return Result(tree is not None and O.nodes_of(tree) >= 1, lb + ["weak"])
    if tree is not None: size_ok(t, lib, tree)
    _, est, ptree = fit(lib)
    if tree is None or ptree is None or "Z" not in rows: agree(t, lib, tree, ptree, "the program", "the package")
    elif abs(t.objective(tree, lib) - t.objective(ptree, lib)) > T.slack(t, lib, t.objective(ptree, lib)) + 1e-4 * t.scale(lib)[1]:
        raise Violation("disagreement", "objective %r from the program, %r from the package" % (t.objective(tree, lib), t.objective(ptree, lib)))
    if tree is None: return Result(False, lb + ["infeasible"])
    score(t, lib, lib, tree, float(s.group(3)), "training")
    ref = with_rows(lib, test) if test else lib
    if test and "T" in rows and "E" in rows and any(v <= 0 for v in rows["T"]): raise Skip()
    score(t, ref, lib, tree, float(s.group(4)), "test")
    q = sum(len(O.leaf_of(tree, x)[1]) + 1 for x in ref["rows"]["X"]) / len(ref["rows"]["X"])
    if not T.close(float(s.group(5)), q, 1e-6): raise Violation("path-length", "average path length %s, the tree's is %r: %s" % (s.group(5), q, w.group(1)))
    return Result(O.nodes_of(tree) >= 1, lb)


def all_test(case, rows):
    """Rounding (per stratum) may put every instance in the test part; that is an error the program may report."""
    n, p = min(case.get("count") or 10 ** 9, len(rows["X"])) * case.get("dup", 1), case["split"]
    return p >= 0.5 and (bool(case.get("stratify")) or p * n >= n - 0.5)


def parts(case, t, lib, tree, train, test):
    """The instances are divided over two parts of the stated sizes: their scores add up to that of all instances."""
    rnd = lambda v: int(math.floor(v + 0.5))
    y, p = lib["rows"].get("y"), case["split"]
    n = len(lib["rows"]["X"])
    if t.name in ADDED: groups = [n] if not case.get("stratify") else [list(y).count(k) for k in set(y)]
    elif t.name == "regression" and not case.get("stratify"): groups = [n]
    else: return
    if any(abs(abs(p * g - math.floor(p * g)) - 0.5) < 1e-6 for g in groups): return     # half an instance: the rounding is not stated
    n_test = sum(rnd(p * g) for g in groups)
    if n_test in (0, n): return
    whole = t.score_of(tree, lib, lib) * n
    got = train * (n - n_test) + test * n_test
    room = 1e-6 * max(1.0, abs(whole)) if t.name in ADDED else 1e-4 * max(1.0, abs(whole)) + 1e-5 * n * max(abs(v) for v in y) ** 2
    if abs(got - whole) > room:
        raise Violation("split", "scores %r of %d training and %r of %d test instances, but %r over all %d: %r" % (train, n - n_test, test, n_test, whole, n, tree))


def relabel(t, f):
    return ("L", f(t[1])) if t[0] == "L" else ("B", t[1], relabel(t[2], f), relabel(t[3], f))


def refeature(t, f):
    return t if t[0] == "L" else ("B", f(t[1]), refeature(t[2], f), refeature(t[3], f))


def score(t, case, train, tree, got, what):
    exp = t.score_of(tree, case, train)
    if exp is None: return
    y = case["rows"].get("y")
    # printed leaf values are rounded to six digits
    room = 1e-6 * max(1.0, abs(exp))
    if t.tol == 1e-3: room = 1e-3 * max(1.0, abs(exp)) + (1e-4 * (max(abs(v) for v in y) ** 2) if y is not None else 0.0)
    if abs(got - exp) > room: raise Violation("score", "%s score %r printed, the tree's is %r: %r" % (what, got, exp, tree))


def spoil_costs(path, K, fault):
    with open(path) as f: lines_ = [l for l in f.read().split("\n") if l]
    i = fault["at"] % (len(lines_) - 1)
    if i >= K: i += 1                                     # not the line with the column names
    w = lines_[i].split(" ")
    if fault["what"] == "word":
        j = fault["at"] // 7 % len(w)
        if i > K and j in (0, 3): j = 1                   # these are names
        w[j] = "x"
    elif fault["what"] == "short": w = w[:-1]
    lines_[i] = " ".join(w)
    if fault["what"] == "fewer": lines_ = lines_[:fault["at"] % K]
    if fault["what"] == "empty": lines_ = []
    with open(path, "w") as f: f.write("".join(l + "\n" for l in lines_))


def faulty(case, t, fault, args, train, d):
    kind, st = fault["kind"], case["style"]
    if kind == "missing-file": args[args.index("-file") + 1] = "nowhere.txt"
    elif kind == "missing-test-file":
        if "-test-file" in args: args[args.index("-test-file") + 1] = "nowhere.txt"
        else: args += ["-test-file", "nowhere.txt"]
    elif kind == "cost-file":
        if "aux" not in case: raise Skip()
        if fault["what"] == "missing": args[args.index("-cost-file") + 1] = "nowhere.txt"
        else: spoil_costs(os.path.join(d, "cost.txt"), len(case["aux"]["M"]), fault)
    elif kind == "nodes": args += ["-max-depth", "2", "-max-num-nodes", "4"]
    elif kind == "complexity": args += ["-max-depth", "3", "-max-num-nodes", "3", "-cost-complexity", "0.1"]
    elif "args" in fault: args += fault["args"]
    else:
        i = fault["at"] % len(train)
        h, f = train[i]
        j = fault["at"] // 7 % len(f)
        if kind == "binary": train[i] = (h, f[:j] + [fault["what"]] + f[j + 1:])
        elif kind == "short-line":
            if len(f) == 1 or i == 0 or case.get("features", len(f)) < len(f): raise Skip()
            train[i] = (h, f[:-1])
        elif kind == "long-line":
            if i == 0 or "features" in case: raise Skip()
            train[i] = (h, f + ["1"])
        elif kind == "label":
            wrong = fault["what"] == "-1" and "y" in case["rows"] and t.tol != 1e-3
            if fault["what"] == "7": wrong = t.name in LIMITED and len(case["aux"]["M"] if "aux" in case else case["rows"]["C"][0] if "C" in case["rows"] else "12345") < 8
            if fault["what"] != "x" and not wrong: raise Skip()
            train[i] = ([fault["what"]] + h[1:], f)
        if kind == "binary" and "features" in case and case["features"] <= j: raise Skip()
    write(os.path.join(d, "train.txt"), train, st, 5)
    code, out = run(args, d)
    what = " ".join(args) if kind not in ("binary", "short-line", "long-line", "label") else "%r in the file" % (train[i],)
    if code < 0: raise Violation("crash", "signal %d for %s (%s)" % (-code, kind, what))
    if code == 0: raise Violation("accepted", "exit status 0 for %s (%s): %s" % (kind, what, out[-200:]))
    if not out.strip(): raise Violation("silent", "no message for %s (%s)" % (kind, what))
    return Result(True, ["fault:" + kind, t.name], 1)
