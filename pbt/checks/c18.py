"""C18: no input, option or call order makes the native code corrupt memory."""
import os, random, re, subprocess, warnings
from ..common import *
from . import c13, c17, c19

ID = "C18"
RULE = ("executed with the address and undefined-behaviour sanitizers and checked standard containers: single fits of all 13 tasks with random data "
        "shapes, limits and options followed by prediction, scoring and question length on other rows (also one row, rows with unseen labels), tuning and "
        "time limits; call histories on several models; misuse with wrong parameters and data; and the command line program on valid and faulty files, whose output also may not depend on the "
        "initial contents of memory; non-trivial: a tree with a branching node was searched for (depth limit at least one and feasible), a history with two fits, or a program run")
CASES = {"quick": 11000, "thorough": 100000}
CHUNK = 10


def gen(rng, tier, i):
    kind = G.pick(rng, ["fit", "history", "cli", "misuse"], p=[.45, .25, .15, .15])
    if kind == "cli": return {"kind": kind, "cli": c17.gen(rng, tier, i)}
    if kind == "history": return {"kind": kind, **c13.gen(rng, tier, i)}
    if kind == "misuse": return {"kind": kind, **c19.gen(rng, tier, i)}
    t = T.ALL[G.pick(rng, sorted(T.ALL))]
    N, F, D = t.size
    big = t.name not in ("f1-score", "group-fairness", "equality-of-opportunity")
    n = G.ri(rng, 2, N + (60 if big else 0)) if G.chance(rng, 0.85) else G.ri(rng, 2, 5)
    F = G.ri(rng, 1, F + (4 if big and t.name != "piecewise-linear-regression" else 0))
    if F > 9: D = min(D, 3)
    c = t.case(rng, n, F, D)
    c["kind"] = "fit"
    if n >= 12 and G.chance(rng, 0.12): c["tune"] = True
    if G.chance(rng, 0.06) and "time_limit" in t.all_args: c["params"]["time_limit"] = 0
    if G.chance(rng, 0.06) and not big: c["params"]["max_depth"] = 4
    c["later"] = []
    for _ in range(G.ri(rng, 0, 3)):
        m = G.pick(rng, [1, 2, G.ri(rng, 1, n), n + 3])
        d = t.gen_rows(rng, max(2, m), len(c["rows"]["X"][0]))
        c["later"].append({k: (v.tolist() if hasattr(v, "tolist") else v)[:m] for k, v in d["rows"].items()})
    return c


def shrinks(case):
    if case["kind"] == "cli":
        for c in c17.shrinks(case["cli"]): yield {**case, "cli": c}
        return
    if case["kind"] == "history":
        yield from c13.shrinks(case)
        return
    if case["kind"] == "misuse":
        from ..engine import default_shrinks
        yield from default_shrinks(case)
        return
    from ..engine import default_shrinks
    for j in range(len(case["later"])): yield {**case, "later": case["later"][:j] + case["later"][j + 1:]}
    if "tune" in case: yield {k: v for k, v in case.items() if k != "tune"}
    for c in default_shrinks(case):
        F = len(c["rows"]["X"][0]) if c["rows"]["X"] else 0
        if all(len(r["X"][0]) == F for r in c["later"]): yield c
        elif "later" in c: yield {**c, "later": []}


def check(case):
    return {"fit": one, "history": history, "cli": program, "misuse": misuse}[case["kind"]](case)


def one(case):
    t = T.ALL[case["task"]]
    need_rows(case)
    p = dict(case["params"])
    if case.get("tune"): p["hyper_tune"] = True
    est = t.make(p)
    lb = label_limits(case, t)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            t.fit(est, case)
        except (ValueError, TypeError): return Result(False, lb + ["refused"])
        tree = t.tree(est) if fitted(est) else None
        if tree is None: return Result(False, lb + ["no tree"])
        for rows in [case["rows"]] + case["later"]:
            c = {**case, "rows": rows}
            for f in (t.predict, t.score, t.qlen):
                try: f(est, c)
                except (Skip, ValueError, TypeError, NotImplementedError, AttributeError): pass
        if hasattr(est, "predict_proba"):
            try: est.predict_proba(t.X(case["rows"]))
            except (ValueError, TypeError): pass
    return Result(case["params"].get("max_depth", 3) >= 1, lb + ["later%d" % len(case["later"])] + (["tuned"] if "tune" in case else []))


def history(case):
    fits, M = 0, {}
    for op, m, a in case["ops"]:
        if op == "new":
            t = T.ALL[case["sets"][a][0]]
            M[m] = [t, t.make(case["sets"][a][1])]
        elif m not in M: continue
        elif op == "drop": del M[m]
        elif op == "clone":
            from sklearn.base import clone
            M[m][1] = clone(M[m][1])
        elif op == "set":
            if case["sets"][a][0] == M[m][0].name: M[m][1].set_params(**case["sets"][a][1])
        elif op in ("print_tree", "export_dot"): continue
        else:
            t, est = M[m]
            d = case["data"][a] if op not in ("tree", "fails") else None
            if d is not None and d["task"] != t.name: continue
            r = c13.call(est, t, op, d)
            if op == "fit" and r and r[0] == "ok": fits += 1
    return Result(fits >= 2, [c["task"] for c in case["data"]] + ["history"])


def misuse(case):
    try: c19.check(case)
    except Violation: pass                                     # judged by C19; only memory errors count here
    return Result(True, [case["task"], "misuse"])


TIMES = re.compile(r"^(TIME|CLOCKS FOR SOLVE|.*[Tt]ime.*|.*seconds.*):?.*$", re.M)


def program(case):
    outs = []
    for fill in (0, 190, 255):
        out = []

        def run(args, cwd):
            env = {k: v for k, v in os.environ.items() if k != "LD_PRELOAD"}
            env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:max_malloc_fill_size=1048576:malloc_fill_byte=%d:allocator_may_return_null=1" % fill
            env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
            p = subprocess.run([c17.PROG] + args, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=env)
            text = p.stdout.decode("utf-8", "replace")
            if p.returncode in (98, 99) or p.returncode < 0 or "AddressSanitizer" in text or "runtime error:" in text:
                k = max(0, min([j for j in (text.find("ERROR: Addr"), text.find("runtime error:")) if j >= 0] or [len(text) - 1500]) - 200)
                raise Violation("sanitizer", "%s: exit status %d: %s" % (" ".join(args), p.returncode, text[k:k + 2500]))
            out.append((args, p.returncode, TIMES.sub("", text)))
            raise Skip()
        keep, c17.run = c17.run, run
        try:
            c17.check(case["cli"])
        except Skip:
            pass
        finally:
            c17.run = keep
        outs.append(out)
        if not out or case["cli"].get("count") or case["cli"].get("tune"): break      # instances are drawn at random
    for o in outs[1:]:
        if o != outs[0]: raise Violation("uninitialised", "the output depends on the initial contents of memory: %s / %s" % (outs[0][0][2][-400:], o[0][2][-400:]))
    if not outs[0]: raise Skip()
    return Result(True, ["cli", case["cli"]["task"]] + (["fault"] if "fault" in case["cli"] else []), len(outs))
